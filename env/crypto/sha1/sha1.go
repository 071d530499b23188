// Package sha1 models an ideal (collision-free) hash.
package sha1

import (
	"hash"

	"github.com/siebenmann/sinksmtp/zz/env"
)

const Size = 20
const BlockSize = 64

type digest struct{ buf []byte }

func (d *digest) Write(p []byte) (int, error) { d.buf = append(d.buf, p...); return len(p), nil }
func (d *digest) Sum(in []byte) []byte        { return append(in, env.Digest(1, string(d.buf), Size)...) }
func (d *digest) Reset()                      { d.buf = nil }
func (d *digest) Size() int                   { return Size }
func (d *digest) BlockSize() int              { return BlockSize }

func New() hash.Hash { return &digest{} }

func Sum(data []byte) [Size]byte {
	var r [Size]byte
	copy(r[:], env.Digest(1, string(data), Size))
	return r
}
