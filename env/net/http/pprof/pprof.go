package pprof
