//go:build verifpool

package main

import "helena/verifpool"

var poolPolicies = []string{"lifo", "fifo", "random", "dirty", "dirty", "poison", "never"}

func poolStart(p string, seed uint64) { verifpool.Start(p, seed) }

func poolEnd() (map[string]int, string) { return verifpool.End() }
