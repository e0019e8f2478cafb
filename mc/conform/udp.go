//go:build go1.21

package main

import (
	"fmt"
	"net"
	"os"
	"strings"
	"time"

	"github.com/jumptrading/influx-spout/v2/verifmc/mcrt"
	"github.com/jumptrading/influx-spout/v2/verifmc/mnet"
)

type udpSock interface {
	ReadFromUDP([]byte) (int, *net.UDPAddr, error)
	Read([]byte) (int, error)
	SetReadDeadline(time.Time) error
	SetReadBuffer(int) error
	Close() error
}

func netErr(err error) string {
	switch {
	case err == nil:
		return "ok"
	case os.IsTimeout(err):
		return "timeout"
	case strings.Contains(err.Error(), "use of closed network connection"):
		return "closed"
	case strings.Contains(err.Error(), "address already in use"):
		return "in use"
	}
	if _, ok := err.(net.Error); ok {
		return "net error"
	}
	return "error"
}

var udpOps = []string{"send 0", "send 3", "send 5", "read 2", "read 64", "deadline soon", "deadline past", "deadline none", "bind again", "close", "buffer"}

func udpScript(seq []int, open func() (udpSock, error), send func(int, byte), now func() time.Time, pause func()) (obs []string) {
	note := func(op string, v ...interface{}) { obs = append(obs, op+": "+strings.TrimSpace(fmt.Sprintln(v...))) }
	c, err := open()
	if err != nil {
		return []string{"open: " + netErr(err)}
	}
	queued, deadline, closed := 0, false, false
	var again udpSock
	for i, op := range seq {
		switch op {
		case 0, 1, 2:
			if !closed {
				queued++
				send([]int{0, 3, 5}[op], byte('a'+i))
			}
		case 3, 4:
			if queued == 0 && !deadline && !closed {
				note("would block")
				continue
			}
			buf := make([]byte, []int{2, 64}[op-3])
			n, _, err := c.ReadFromUDP(buf)
			note("read", n, string(buf[:n]), netErr(err))
			if err == nil {
				queued--
			}
		case 5:
			note("deadline", netErr(c.SetReadDeadline(now().Add(10*time.Millisecond))))
			deadline = true
		case 6:
			note("deadline", netErr(c.SetReadDeadline(now().Add(-time.Second))))
			deadline = true
		case 7:
			note("deadline", netErr(c.SetReadDeadline(time.Time{})))
			deadline = false
		case 8:
			s, err := open()
			note("bind", netErr(err))
			if err == nil {
				again = s
			}
		case 9:
			note("close", netErr(c.Close()))
			closed = true
		case 10:
			note("buffer", netErr(c.SetReadBuffer(65536)))
		}
		pause()
	}
	c.Close()
	if again != nil {
		again.Close()
	}
	return obs
}

func init() {
	addPart("udp", "UDP socket operations in sequence: truncation, order, deadlines, closing, binding twice", func(p *part) {
		var cases [][]int
		for d := 1; d <= 4; d++ {
			sequences(len(udpOps), d, func(s []int) { cases = append(cases, s) })
		}
		parallel(48, cases, func(_ int, s []int) {
			p.compare(fmt.Sprint(s),
				func(int) (obs []string) {
					modelMu.Lock()
					defer modelMu.Unlock()
					if v := inModel(func() {
						mnet.Setup()
						obs = udpScript(s, func() (udpSock, error) {
							c, err := mnet.ListenUDP("udp", &net.UDPAddr{Port: 5000})
							if err != nil {
								return nil, err
							}
							return c, nil
						}, func(n int, c byte) {
							if u := mnet.N.UDP(5000); u != nil {
								u.Send([]byte(strings.Repeat(string(rune(c)), n)))
							}
						}, func() time.Time { return time.Unix(0, mcrt.NowNanos()) }, func() {})
					}); v != nil {
						return v
					}
					return obs
				},
				func(patience int) []string {
					port := 0
					var out *net.UDPConn
					obs := udpScript(s, func() (udpSock, error) {
						c, err := net.ListenUDP("udp", &net.UDPAddr{Port: port})
						if err != nil {
							return nil, err
						}
						port = c.LocalAddr().(*net.UDPAddr).Port
						return c, nil
					}, func(n int, c byte) {
						if out == nil {
							var err error
							out, err = net.DialUDP("udp", nil, &net.UDPAddr{IP: net.IPv4(127, 0, 0, 1), Port: port})
							if err != nil {
								panic(err)
							}
						}
						out.Write([]byte(strings.Repeat(string(rune(c)), n)))
					}, time.Now, func() { time.Sleep(time.Duration(patience-1) * time.Millisecond) })
					if out != nil {
						out.Close()
					}
					return obs
				})
		})
	})
}
