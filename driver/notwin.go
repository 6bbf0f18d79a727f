//go:build !twin
// +build !twin

package main

func twinDiffers(c *kase, src []byte, text string) (string, bool) { return "", false }
