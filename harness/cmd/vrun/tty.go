package main

import (
	"fmt"
	"io"
	"os"
	"syscall"
	"unsafe"
)

// openTerminal makes a pseudo terminal that passes on what is written to it unchanged
func openTerminal() (master, slave *os.File, err error) {
	m, err := os.OpenFile("/dev/ptmx", os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		return nil, nil, err
	}
	ioctl := func(f *os.File, req uintptr, p unsafe.Pointer) error {
		rc, err := f.SyscallConn()
		if err != nil {
			return err
		}
		var e syscall.Errno
		if err := rc.Control(func(fd uintptr) { _, _, e = syscall.Syscall(syscall.SYS_IOCTL, fd, req, uintptr(p)) }); err != nil {
			return err
		}
		if e != 0 {
			return e
		}
		return nil
	}
	var n, zero uint32
	if err := ioctl(m, syscall.TIOCGPTN, unsafe.Pointer(&n)); err != nil {
		m.Close()
		return nil, nil, err
	}
	if err := ioctl(m, syscall.TIOCSPTLCK, unsafe.Pointer(&zero)); err != nil {
		m.Close()
		return nil, nil, err
	}
	s, err := os.OpenFile(fmt.Sprintf("/dev/pts/%d", n), os.O_RDWR|syscall.O_NOCTTY, 0)
	if err != nil {
		m.Close()
		return nil, nil, err
	}
	var t syscall.Termios
	err = ioctl(s, syscall.TCGETS, unsafe.Pointer(&t))
	if err == nil {
		t.Oflag &^= syscall.OPOST // no carriage returns
		t.Lflag &^= syscall.ECHO
		err = ioctl(s, syscall.TCSETS, unsafe.Pointer(&t))
	}
	if err != nil {
		m.Close()
		s.Close()
		return nil, nil, err
	}
	return m, s, nil
}

// sink is where a program writes to: what arrives is copied to w until the program has ended.
// kind: "terminal", "pipe" or "socket"
func sink(kind string, w io.Writer) (f *os.File, done func(), err error) {
	var from, to *os.File
	switch kind {
	case "terminal":
		from, to, err = openTerminal()
	case "socket":
		var fds [2]int
		if fds, err = syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_CLOEXEC, 0); err == nil {
			from, to = os.NewFile(uintptr(fds[0]), "socket"), os.NewFile(uintptr(fds[1]), "socket")
		}
	default:
		from, to, err = os.Pipe()
	}
	if err != nil {
		return nil, nil, err
	}
	end := make(chan struct{})
	return to, func() {
		go func() {
			io.Copy(w, from) // a terminal ends with EIO
			from.Close()
			close(end)
		}()
		to.Close()
		<-end
	}, nil
}
