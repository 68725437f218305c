// Package net is the simulated package net: connections live in simnet.
package net

import (
	real "net"
	"time"

	"github.com/go-stomp/stomp/v3/zzverif/rt/context"
	"github.com/go-stomp/stomp/v3/zzverif/simnet"
)

func Dial(network, address string) (Conn, error) {
	c, err := simnet.Default.Dial(address)
	if err != nil {
		return nil, err
	}
	return c, nil
}

func DialTimeout(network, address string, timeout time.Duration) (Conn, error) {
	return Dial(network, address)
}

type Dialer struct {
	Timeout   time.Duration
	Deadline  time.Time
	LocalAddr Addr
	KeepAlive time.Duration
}

func (d *Dialer) Dial(network, address string) (Conn, error) { return Dial(network, address) }

func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	deadline, _ := ctx.Deadline()
	c, err := simnet.Default.DialUntil(address, len(simnet.Default.Links), deadline)
	if err != nil {
		return nil, err
	}
	return c, nil
}

func Listen(network, address string) (Listener, error) {
	l, err := simnet.Default.Listen(address)
	if err != nil {
		return nil, err
	}
	return l, nil
}

func Pipe() (Conn, Conn) {
	l := simnet.Default.NewLink()
	return l.A, l.B
}

var _ real.Conn = (*simnet.Conn)(nil)
