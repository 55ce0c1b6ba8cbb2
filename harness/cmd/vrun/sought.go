package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"slices"
	"strings"
	"time"
)

// Files that a program looks for without being told to: nobody documents any, so what stands in them
// must not matter. Their names are those that one run asks the system for, as far as strace can show it
// here, and every string of the code that may be a name.

var pathInCall = regexp.MustCompile(`\(?(?:AT_FDCWD|[0-9]+)?,? ?"((?:[^"\\]|\\.)*)"`)

// soughtFiles gives relative names below the working or home directory dir
func soughtFiles(dir string, env []string, limit time.Duration, bin string, args ...string) (names []string, seen int) {
	add := func(n string) {
		n = filepath.Clean(n)
		if n == "" || n == "." || filepath.IsAbs(n) || strings.HasPrefix(n, "..") || len(n) > 120 || strings.ContainsAny(n, "\x00\n*%{}") || slices.Contains(names, n) {
			return
		}
		names = append(names, n)
	}
	if st, err := exec.LookPath("strace"); err == nil {
		out := filepath.Join(dir, "trace-of-files")
		c := exec.Command(st, append([]string{"-D", "-f", "-qq", "-s", "500", "-e", "signal=none", "-e", "trace=file", "-o", out, bin}, args...)...)
		c.Dir, c.Env = dir, append([]string{"PATH=/usr/bin:/bin", "HOME=" + dir}, env...)
		if c.Start() == nil {
			done := make(chan struct{})
			go func() { c.Wait(); close(done) }()
			select {
			case <-done:
			case <-time.After(limit):
				c.Process.Kill()
				<-done
			}
		}
		b, _ := os.ReadFile(out)
		os.Remove(out)
		for _, l := range strings.Split(string(b), "\n") {
			if strings.Contains(l, "execve") {
				continue
			}
			if m := pathInCall.FindStringSubmatch(l); m != nil {
				n := m[1]
				if rel, err := filepath.Rel(dir, n); filepath.IsAbs(n) && err == nil {
					n = rel
				}
				before := len(names)
				add(n)
				seen += len(names) - before
			}
		}
	}
	for _, s := range dictStrings {
		if !strings.ContainsAny(s, " \t<>|:;,()'\"") && strings.Trim(s, "/.") != "" {
			add(strings.TrimLeft(s, "/"))
		}
	}
	return names, seen
}

// putFiles writes them, with settings in one of the usual forms
func putFiles(g rng, dir string, names []string, settings map[string]string, prefix string) (how string) {
	how = pickS(g, []string{"lines", "flags", "json", "yaml", "variables", "blanks", "empty", "garbage"})
	var b strings.Builder
	if strings.HasPrefix(how, "js") {
		j, _ := json.MarshalIndent(settings, "", " ")
		b.Write(j)
	}
	for _, k := range sortedKeys(settings) {
		v := settings[k]
		switch how {
		case "lines":
			fmt.Fprintf(&b, "%s=%s\n", k, v)
		case "flags":
			fmt.Fprintf(&b, "-%s=%s\n", k, v)
		case "yaml":
			fmt.Fprintf(&b, "%s: %s\n", k, v)
		case "variables":
			fmt.Fprintf(&b, "%s%s=%s\n", prefix, strings.ToUpper(strings.ReplaceAll(k, ".", "_")), v)
		case "blanks":
			fmt.Fprintf(&b, "%s %s\n", k, v)
		}
	}
	if how == "garbage" {
		b.WriteString(strings.Repeat("\x00\xff{[<", 400))
	}
	for _, n := range names {
		f := filepath.Join(dir, n)
		if os.MkdirAll(filepath.Dir(f), 0o755) == nil {
			os.WriteFile(f, []byte(b.String()), 0o644)
		}
	}
	return how
}
