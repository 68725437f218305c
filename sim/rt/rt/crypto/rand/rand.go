// Package rand is the simulated package crypto/rand.
package rand

import (
	"io"

	"github.com/go-stomp/stomp/v3/zzverif/sim"
)

type reader struct{}

func (reader) Read(p []byte) (int, error) {
	for i := range p {
		p[i] = byte(sim.Choose(256))
	}
	return len(p), nil
}

var Reader io.Reader = reader{}

func Read(p []byte) (int, error) { return Reader.Read(p) }
