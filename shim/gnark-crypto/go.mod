module github.com/consensys/gnark-crypto

go 1.24.0

require golang.org/x/sys v0.30.0
