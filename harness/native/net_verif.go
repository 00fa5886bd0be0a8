package net

import (
	"net/netip"
	"time"
)

// VerifConn is an in-memory socket.
type VerifConn interface {
	ReadFrom(b []byte) (int, *UDPAddr, error)
	WriteTo(b []byte, addr *UDPAddr) (int, error)
	Close() error
	LocalAddr() Addr
	SetReadDeadline(t time.Time) error
}

// VerifListen, when set, opens all UDP sockets.
var VerifListen func(network string, laddr *UDPAddr) (VerifConn, error)

func verifListenUDP(network string, laddr *UDPAddr) (*UDPConn, error) {
	v, err := VerifListen(network, laddr)
	if err != nil {
		return nil, err
	}
	return &UDPConn{conn{new(netFD)}, v}, nil
}

func (c *UDPConn) vread(b []byte) (int, netip.AddrPort, error) {
	n, a, err := c.vf.ReadFrom(b)
	if err != nil {
		return n, netip.AddrPort{}, err
	}
	return n, a.AddrPort(), nil
}

func (c *UDPConn) Read(b []byte) (int, error) {
	if c != nil && c.vf != nil {
		n, _, err := c.vf.ReadFrom(b)
		if err != nil {
			err = &OpError{Op: "read", Net: "udp4", Err: err}
		}
		return n, err
	}
	return c.conn.Read(b)
}

func (c *UDPConn) Close() error {
	if c != nil && c.vf != nil {
		if err := c.vf.Close(); err != nil {
			return &OpError{Op: "close", Net: "udp", Err: err}
		}
		return nil
	}
	if c == nil {
		return (*conn)(nil).Close()
	}
	return c.conn.Close()
}

func (c *UDPConn) LocalAddr() Addr {
	if c != nil && c.vf != nil {
		return c.vf.LocalAddr()
	}
	return c.conn.LocalAddr()
}

func (c *UDPConn) SetReadDeadline(t time.Time) error {
	if c != nil && c.vf != nil {
		return c.vf.SetReadDeadline(t)
	}
	return c.conn.SetReadDeadline(t)
}

func (c *UDPConn) SetDeadline(t time.Time) error {
	if c != nil && c.vf != nil {
		return c.vf.SetReadDeadline(t)
	}
	return c.conn.SetDeadline(t)
}

func (c *UDPConn) SetWriteDeadline(t time.Time) error {
	if c != nil && c.vf != nil {
		return nil
	}
	return c.conn.SetWriteDeadline(t)
}

func (c *UDPConn) SetReadBuffer(n int) error {
	if c != nil && c.vf != nil {
		return nil
	}
	return c.conn.SetReadBuffer(n)
}

func (c *UDPConn) SetWriteBuffer(n int) error {
	if c != nil && c.vf != nil {
		return nil
	}
	return c.conn.SetWriteBuffer(n)
}
