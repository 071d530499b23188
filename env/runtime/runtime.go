package runtime

var MemProfileRate int

func GC()                  {}
func NumGoroutine() int    { return 1 }
func GOMAXPROCS(n int) int { return 1 }
func NumCPU() int          { return 1 }
func Gosched()             {}
func Version() string      { return "go" }

const GOOS = "linux"
