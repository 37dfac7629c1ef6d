// Package rpc is the standard one, on a network that the driver makes.
package rpc

import (
	"errors"
	"io"
	"net"
	"net/http"
	"net/rpc"
	"time"
)

type (
	Client      = rpc.Client
	Call        = rpc.Call
	Server      = rpc.Server
	Request     = rpc.Request
	Response    = rpc.Response
	ServerError = rpc.ServerError
	ClientCodec = rpc.ClientCodec
	ServerCodec = rpc.ServerCodec
)

var (
	ErrShutdown        = rpc.ErrShutdown
	DefaultServer      = rpc.DefaultServer
	NewServer          = rpc.NewServer
	NewClient          = rpc.NewClient
	NewClientWithCodec = rpc.NewClientWithCodec
)

// Network connects to an address.
var Network func(address string) (io.ReadWriteCloser, error)

// Registered gets what is registered for remote calls.
var Registered func(rcvr interface{})

func Dial(network, address string) (*Client, error) {
	if Network == nil {
		return nil, errors.New("no network")
	}
	c, err := Network(address)
	if err != nil {
		return nil, err
	}
	return rpc.NewClient(c), nil
}

func DialTimeout(network, address string, timeout time.Duration) (*Client, error) {
	return Dial(network, address)
}

func Register(rcvr interface{}) error {
	if Registered != nil {
		Registered(rcvr)
	}
	return nil
}

func RegisterName(name string, rcvr interface{}) error { return Register(rcvr) }
func Accept(l net.Listener)                            {}
func ServeConn(c io.ReadWriteCloser)                   {}
func HandleHTTP()                                      { http.NotFoundHandler() }
