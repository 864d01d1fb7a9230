//go:build !race

package main

const raceOn = false

func races() int { return 0 }
