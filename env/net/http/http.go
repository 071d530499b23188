package http

type Handler interface{}
type ResponseWriter interface{ Write([]byte) (int, error) }
type Request struct{}

func ListenAndServe(addr string, h Handler) error           { select {} }
func HandleFunc(p string, f func(ResponseWriter, *Request)) {}
