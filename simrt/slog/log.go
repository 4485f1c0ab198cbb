// Package slog replaces log.Fatal*, which would end the real process.
package slog

import (
	"log"

	"gRedis/verifsim/sim"
)

func Fatal(v ...any)            { log.Print(v...); sim.Exit(1) }
func Fatalf(f string, v ...any) { log.Printf(f, v...); sim.Exit(1) }
func Fatalln(v ...any)          { log.Println(v...); sim.Exit(1) }
