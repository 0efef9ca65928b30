// Package fmt replaces package fmt: the same formatting, with output going to
// the simulated process.
package fmt

import (
	real "fmt"
	"io"

	rt "ZZSIM/rt"
	"ZZSIM/std/os"
)

func Appendf(b []byte, f string, a ...any) []byte {
	rt.IgnoreSync()
	defer rt.UnignoreSync()
	return real.Appendf(b, f, a...)
}

func Append(b []byte, a ...any) []byte {
	rt.IgnoreSync()
	defer rt.UnignoreSync()
	return real.Append(b, a...)
}

func Appendln(b []byte, a ...any) []byte {
	rt.IgnoreSync()
	defer rt.UnignoreSync()
	return real.Appendln(b, a...)
}

func Sprintf(f string, a ...any) string { return string(Appendf(nil, f, a...)) }
func Sprint(a ...any) string            { return string(Append(nil, a...)) }
func Sprintln(a ...any) string          { return string(Appendln(nil, a...)) }

func Fprintf(w io.Writer, f string, a ...any) (int, error) { return w.Write(Appendf(nil, f, a...)) }
func Fprint(w io.Writer, a ...any) (int, error)            { return w.Write(Append(nil, a...)) }
func Fprintln(w io.Writer, a ...any) (int, error)          { return w.Write(Appendln(nil, a...)) }

func Printf(f string, a ...any) (int, error) { return Fprintf(os.CurStdout(), f, a...) }
func Print(a ...any) (int, error)            { return Fprint(os.CurStdout(), a...) }
func Println(a ...any) (int, error)          { return Fprintln(os.CurStdout(), a...) }

func Errorf(f string, a ...any) error {
	rt.IgnoreSync()
	defer rt.UnignoreSync()
	return real.Errorf(f, a...)
}

func Scan(a ...any) (int, error)            { return real.Fscan(os.CurStdin(), a...) }
func Scanln(a ...any) (int, error)          { return real.Fscanln(os.CurStdin(), a...) }
func Scanf(f string, a ...any) (int, error) { return real.Fscanf(os.CurStdin(), f, a...) }
