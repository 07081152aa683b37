//go:build noadx || purego || !amd64

package cpu

const SupportADX = false
