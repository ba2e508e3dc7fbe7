//go:build race

package main

const raceBuilt = true
