//go:build !race

package main

func raceMain(si, mode, reps int) { panic("not a race build") }
