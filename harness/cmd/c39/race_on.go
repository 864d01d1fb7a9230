//go:build race

package main

import "runtime"

const raceOn = true

func races() int { return runtime.RaceErrors() }
