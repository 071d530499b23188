// Package mail models message splitting: the body starts after the first
// empty line; a message without one cannot be parsed.
package mail

import (
	"errors"
	"io"
	"strings"
)

type Header map[string][]string

func (h Header) Get(k string) string { return "" }

type Message struct {
	Header Header
	Body   io.Reader
}

func ReadMessage(r io.Reader) (*Message, error) {
	b, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	s := string(b)
	i := strings.Index(s, "\n\n")
	if i < 0 {
		return nil, errors.New("malformed message")
	}
	return &Message{Header: Header{}, Body: strings.NewReader(s[i+2:])}, nil
}
