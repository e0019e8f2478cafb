//go:build go1.21

// Package mfmt is package fmt with standard output captured.
package mfmt

import (
	"fmt"
	"io"

	"github.com/jumptrading/influx-spout/v2/verifmc/mos"
)

func Sprintf(f string, a ...interface{}) string {
	return fmt.Sprintf(f, a...)
}
func Sprint(a ...interface{}) string {
	return fmt.Sprint(a...)
}
func Sprintln(a ...interface{}) string {
	return fmt.Sprintln(a...)
}
func Errorf(f string, a ...interface{}) error {
	return fmt.Errorf(f, a...)
}
func Fprintf(w io.Writer, f string, a ...interface{}) (int, error) {
	return w.Write([]byte(Sprintf(f, a...)))
}
func Fprint(w io.Writer, a ...interface{}) (int, error) { return w.Write([]byte(Sprint(a...))) }
func Fprintln(w io.Writer, a ...interface{}) (int, error) {
	return w.Write([]byte(Sprintln(a...)))
}
func Printf(f string, a ...interface{}) (int, error) { return Fprintf(mos.Stdout, f, a...) }
func Print(a ...interface{}) (int, error)            { return Fprint(mos.Stdout, a...) }
func Println(a ...interface{}) (int, error)          { return Fprintln(mos.Stdout, a...) }
