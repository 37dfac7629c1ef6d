// Package listener stands in for the listener of the cluster: nothing listens on the real network.
package listener

import (
	"net"
	"time"
)

type Listener struct{ net.Listener }

func New(addr string) (*Listener, error)           { return &Listener{}, nil }
func (l *Listener) SetReadTimeout(t time.Duration) {}
func (l *Listener) Close() error                   { return nil }
func (l *Listener) Addr() net.Addr                 { return &net.TCPAddr{} }
func (l *Listener) Accept() (net.Conn, error)      { select {} }
func (l *Listener) Serve() error                   { return nil }
