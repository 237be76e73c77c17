// Package log stands in for log in the copy of the command: a fatal message ends the command, and not the process.
package log

// Exit ends the command
var Exit func(code int)

func Printf(format string, a ...any) {}
func Println(a ...any)               {}
func Print(a ...any)                 {}
func Fatalf(format string, a ...any) { Exit(1) }
func Fatal(a ...any)                 { Exit(1) }
func Fatalln(a ...any)               { Exit(1) }
