package main

import (
	"crypto/tls"
	"errors"
	"net"
	"os"
	"path/filepath"
	"syscall"
	"time"
)

// TCP: what package net's TCP connections and listeners do with the simulated
// ones behind them, and TLS on the client's side.

func (s *SConn) SetKeepAlive(on bool) error {
	s.cs.noteKeepAlive(on, 0)
	return nil
}

func (s *SConn) SetKeepAlivePeriod(d time.Duration) error {
	s.cs.noteKeepAlive(true, d)
	return nil
}

func (s *SConn) CloseRead() error  { return nil }
func (s *SConn) CloseWrite() error { s.cs.halfClose(); return nil }

//go:norace
func (c *CS) noteKeepAlive(on bool, d time.Duration) {
	if d == 0 {
		c.kaSet, c.ka = true, on
	} else {
		c.kaPeriod = d
	}
}

// halfClose: the server sends no more.
func (c *CS) halfClose() {
	c.mu.Lock()
	c.outEOF = true
	c.cond.Broadcast()
	c.mu.Unlock()
}

// cliConn is the client's end as a net.Conn.
type cliConn struct {
	*Client
}

func (c cliConn) Write(b []byte) (int, error) {
	if err := c.cs.Send(b); err != nil {
		return 0, err
	}
	return len(b), nil
}
func (c cliConn) Close() error                     { return nil }
func (c cliConn) LocalAddr() net.Addr              { return simAddr("client:" + itoa(c.cs.id)) }
func (c cliConn) RemoteAddr() net.Addr             { return simAddr("server") }
func (c cliConn) SetDeadline(time.Time) error      { return nil }
func (c cliConn) SetReadDeadline(time.Time) error  { return nil }
func (c cliConn) SetWriteDeadline(time.Time) error { return nil }

// tlsDir holds a certificate for the tests and its key.
var tlsDir = func() string {
	if d := os.Getenv("SIM_TLS"); d != "" {
		return d
	}
	exe, _ := os.Executable()
	for d := filepath.Dir(exe); len(d) > 1; d = filepath.Dir(d) {
		t := filepath.Join(d, "sim/worker/tls")
		if _, err := os.Stat(filepath.Join(t, "cert.pem")); err == nil {
			return t
		}
	}
	return ""
}()

var certFile, keyFile = filepath.Join(tlsDir, "cert.pem"), filepath.Join(tlsDir, "key.pem")
var certFile256, keyFile256 = filepath.Join(tlsDir, "cert256.pem"), filepath.Join(tlsDir, "key256.pem")

func tlsName(id int) string { return "client" + itoa(id) + ".sim" }

func tlsClient(c *Client, id int, max uint16) *tls.Conn {
	return tls.Client(cliConn{c}, &tls.Config{InsecureSkipVerify: true, MinVersion: tls.VersionTLS10, MaxVersion: max, ServerName: tlsName(id), NextProtos: []string{"http/1.1", "sim/1"}, CurvePreferences: []tls.CurveID{tls.X25519, tls.CurveP256}})
}

var errInUse = &net.OpError{Op: "listen", Net: "tcp", Addr: simAddr("server"), Err: os.NewSyscallError("bind", syscall.EADDRINUSE)}

func isInUse(err error) bool { return errors.Is(err, syscall.EADDRINUSE) }
