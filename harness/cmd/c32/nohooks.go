//go:build nohooks

package main

var portable []op
