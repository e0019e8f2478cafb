//go:build go1.21

// Package mos replaces the process level parts of package os.
package mos

import (
	"fmt"
	"io"

	"github.com/jumptrading/influx-spout/v2/verifmc/mcrt"
)

func Exit(code int) { mcrt.ExitProcess(fmt.Sprintf("os.Exit(%d)", code)) }

// File captures what is written to a standard stream.
type File struct {
	Buf   []byte
	Name_ string
}

func (f *File) Write(p []byte) (int, error) {
	mcrt.Yield("stdout")
	f.Buf = append(f.Buf, p...)
	return len(p), nil
}
func (f *File) WriteString(s string) (int, error) { return f.Write([]byte(s)) }
func (f *File) Sync() error                       { return nil }
func (f *File) Close() error                      { return nil }
func (f *File) Fd() uintptr                       { return 1 }
func (f *File) Name() string                      { return f.Name_ }

var (
	Stdout = &File{Name_: "/dev/stdout"}
	Stderr = &File{Name_: "/dev/stderr"}
)

// Reset clears the captured output.
func Reset() {
	Stdout.Buf = nil
	Stderr.Buf = nil
}

var _ io.Writer = Stdout
