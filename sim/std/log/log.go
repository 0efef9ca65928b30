// Package log replaces package log: lines go to the simulated process's
// standard error, and Fatal ends the simulated process.
package log

import (
	"io"

	rt "ZZSIM/rt"
	"ZZSIM/std/fmt"
	"ZZSIM/std/os"
)

const (
	Ldate = 1 << iota
	Ltime
	Lmicroseconds
	Llongfile
	Lshortfile
	LUTC
	Lmsgprefix
	LstdFlags = Ldate | Ltime
)

// Logger replaces log.Logger.
type Logger struct {
	mu     rt.Mutex
	out    io.Writer
	prefix string
	flags  int
	std    bool
}

// New is log.New.
func New(out io.Writer, prefix string, flag int) *Logger {
	return &Logger{out: out, prefix: prefix, flags: flag}
}

// Default is log.Default.
func Default() *Logger {
	return rt.Local("log.std", func() any { return &Logger{flags: LstdFlags, std: true} }).(*Logger)
}

// Output writes a line.
func (l *Logger) Output(depth int, s string) error {
	line := s
	if len(line) == 0 || line[len(line)-1] != '\n' {
		line += "\n"
	}
	if l.std && l.out == nil {
		if l.flags&LstdFlags != 0 {
			line = rt.NowTime().Format("2006/01/02 15:04:05 ") + line
		}
		rt.LogLine(l.prefix + line)
		return nil
	}
	l.mu.Lock()
	defer l.mu.Unlock()
	_, err := l.out.Write([]byte(l.prefix + line))
	return err
}

func (l *Logger) SetOutput(w io.Writer) { l.mu.Lock(); l.out = w; l.mu.Unlock() }
func (l *Logger) SetPrefix(p string)    { l.prefix = p }
func (l *Logger) SetFlags(f int)        { l.flags = f }
func (l *Logger) Prefix() string        { return l.prefix }
func (l *Logger) Flags() int            { return l.flags }
func (l *Logger) Writer() io.Writer {
	if l.out == nil {
		return os.CurStderr()
	}
	return l.out
}

func (l *Logger) Printf(f string, a ...any) { l.Output(2, fmt.Sprintf(f, a...)) }
func (l *Logger) Print(a ...any)            { l.Output(2, fmt.Sprint(a...)) }
func (l *Logger) Println(a ...any)          { l.Output(2, fmt.Sprintln(a...)) }
func (l *Logger) Fatalf(f string, a ...any) { l.Output(2, fmt.Sprintf(f, a...)); rt.Exit(1) }
func (l *Logger) Fatal(a ...any)            { l.Output(2, fmt.Sprint(a...)); rt.Exit(1) }
func (l *Logger) Fatalln(a ...any)          { l.Output(2, fmt.Sprintln(a...)); rt.Exit(1) }
func (l *Logger) Panicf(f string, a ...any) { s := fmt.Sprintf(f, a...); l.Output(2, s); panic(s) }
func (l *Logger) Panic(a ...any)            { s := fmt.Sprint(a...); l.Output(2, s); panic(s) }
func (l *Logger) Panicln(a ...any)          { s := fmt.Sprintln(a...); l.Output(2, s); panic(s) }

func SetOutput(w io.Writer)            { Default().SetOutput(w) }
func SetPrefix(p string)               { Default().SetPrefix(p) }
func SetFlags(f int)                   { Default().SetFlags(f) }
func Prefix() string                   { return Default().Prefix() }
func Flags() int                       { return Default().Flags() }
func Writer() io.Writer                { return Default().Writer() }
func Output(depth int, s string) error { return Default().Output(depth, s) }
func Printf(f string, a ...any)        { Default().Printf(f, a...) }
func Print(a ...any)                   { Default().Print(a...) }
func Println(a ...any)                 { Default().Println(a...) }
func Fatalf(f string, a ...any)        { Default().Fatalf(f, a...) }
func Fatal(a ...any)                   { Default().Fatal(a...) }
func Fatalln(a ...any)                 { Default().Fatalln(a...) }
func Panicf(f string, a ...any)        { Default().Panicf(f, a...) }
func Panic(a ...any)                   { Default().Panic(a...) }
func Panicln(a ...any)                 { Default().Panicln(a...) }
