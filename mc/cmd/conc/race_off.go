//go:build !race

package main

func raceErrors() int { return 0 }
