package main

import (
	"github.com/siebenmann/sinksmtp/zz/expvar"
	"github.com/siebenmann/sinksmtp/zz/verif"
)

// zzStat reads a published statistic.
func zzStat(path ...string) expvar.Var {
	v := expvar.Get("sinksmtp")
	for _, p := range path {
		m, ok := v.(*expvar.Map)
		if !ok {
			return nil
		}
		v = m.Get(p)
	}
	return v
}

// zzHits is the published count of a name, whatever the type of the counters.
func zzHits(what, name string) int {
	switch f := zzStat(what).(type) {
	case *expvar.Map:
		return zzNumOf(f.Get(name), 0)
	case expvar.Func:
		switch m := f.Value().(type) {
		case map[string]uint64:
			return int(m[name])
		case map[string]int64:
			return int(m[name])
		case map[string]int:
			return m[name]
		case map[string]uint:
			return int(m[name])
		case map[string]uint32:
			return int(m[name])
		case map[string]int32:
			return int(m[name])
		}
	}
	return -1
}

func zzNumOf(v expvar.Var, none int) int {
	switch i := v.(type) {
	case nil:
		return none
	case *expvar.Int:
		return int(i.Value())
	case expvar.Func:
		switch x := i.Value().(type) {
		case int:
			return x
		case int64:
			return int(x)
		case uint64:
			return int(x)
		case uint32:
			return int(x)
		case int32:
			return int(x)
		}
	}
	verif.Unsupported("a counter of another type")
	return -1
}

// zzNum is a published counter, or -1.
func zzNum(path ...string) int {
	return zzNumOf(zzStat(path...), -1)
}
