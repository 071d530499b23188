package env

import "io"

func ioEOF() error { return io.EOF }
