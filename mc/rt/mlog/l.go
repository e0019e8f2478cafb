//go:build go1.21

// Package mlog replaces package log: output is formatted and discarded
// (or traced); the Fatal family ends the modelled process.
package mlog

import (
	"fmt"
	"io"

	"github.com/jumptrading/influx-spout/v2/verifmc/mcrt"
)

func out(s string) { mcrt.Logf("log: %s", s) }

func sprintf(f string, a ...interface{}) string {
	return fmt.Sprintf(f, a...)
}
func sprint(a ...interface{}) string {
	return fmt.Sprint(a...)
}

func Printf(f string, a ...interface{}) { out(sprintf(f, a...)) }
func Print(a ...interface{})            { out(sprint(a...)) }
func Println(a ...interface{})          { out(sprint(a...)) }
func Fatalf(f string, a ...interface{}) { mcrt.ExitProcess("log.Fatal: " + sprintf(f, a...)) }
func Fatal(a ...interface{})            { mcrt.ExitProcess("log.Fatal: " + sprint(a...)) }
func Fatalln(a ...interface{})          { mcrt.ExitProcess("log.Fatal: " + sprint(a...)) }
func Panicf(f string, a ...interface{}) { panic(sprintf(f, a...)) }
func Panic(a ...interface{})            { panic(sprint(a...)) }
func Panicln(a ...interface{})          { panic(sprint(a...)) }
func SetFlags(int)                      {}
func SetPrefix(string)                  {}
func SetOutput(io.Writer)               {}

// Logger models log.Logger.
type Logger struct{ prefix string }

func New(_ io.Writer, prefix string, _ int) *Logger { return &Logger{prefix} }
func Default() *Logger                              { return &Logger{} }

func (l *Logger) Printf(f string, a ...interface{}) { Printf(f, a...) }
func (l *Logger) Print(a ...interface{})            { Print(a...) }
func (l *Logger) Println(a ...interface{})          { Println(a...) }
func (l *Logger) Fatalf(f string, a ...interface{}) { Fatalf(f, a...) }
func (l *Logger) Fatal(a ...interface{})            { Fatal(a...) }
func (l *Logger) Fatalln(a ...interface{})          { Fatalln(a...) }
