module verifharness

go 1.23.0

require (
	github.com/anishathalye/porcupine v1.3.1
	github.com/moov-io/base v0.54.3
	github.com/moov-io/dukpt v0.0.0
)

require (
	github.com/chmike/cmac-go v1.1.0 // indirect
	github.com/go-kit/kit v0.13.0 // indirect
	github.com/go-kit/log v0.2.1 // indirect
	github.com/go-logfmt/logfmt v0.6.0 // indirect
	github.com/gorilla/mux v1.8.1 // indirect
	github.com/moov-io/pinblock v0.0.0-20241211163540-59484be0a633 // indirect
	github.com/rickar/cal/v2 v2.1.22 // indirect
)

replace github.com/moov-io/dukpt => /repo
