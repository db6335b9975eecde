module blichmann.eu/code/btrfscue/verif

go 1.23

require (
	blichmann.eu/code/btrfscue v0.0.0
	go.etcd.io/bbolt v1.3.6
	pgregory.net/rapid v1.3.0
)

require (
	github.com/VividCortex/ewma v1.2.0 // indirect
	github.com/cheggaaa/pb/v3 v3.1.0 // indirect
	github.com/fatih/color v1.13.0 // indirect
	github.com/hanwen/go-fuse/v2 v2.1.0 // indirect
	github.com/inconshreveable/mousetrap v1.0.1 // indirect
	github.com/mattn/go-colorable v0.1.13 // indirect
	github.com/mattn/go-isatty v0.0.16 // indirect
	github.com/mattn/go-runewidth v0.0.13 // indirect
	github.com/rivo/uniseg v0.3.4 // indirect
	github.com/spf13/cobra v1.5.0 // indirect
	github.com/spf13/pflag v1.0.5 // indirect
	golang.org/x/sys v0.0.0-20220829200755-d48e67d00261 // indirect
)

replace blichmann.eu/code/btrfscue => /repo
