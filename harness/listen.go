package main

import (
	"context"
	"fmt"
	"net"
	"strings"
	"syscall"

	"github.com/dropmorepackets/haproxy-go/peers"
	st "github.com/dropmorepackets/haproxy-go/peers/sticktable"
	"github.com/dropmorepackets/haproxy-go/spop"

	"verif/sched"
)

// ListenAndServe, with net.Listen answered by the harness.

// the address cannot be bound for real: code that finds another way to listen
// fails there and the scenario has nothing to say about it
const listenAddr = "192.0.2.1:12345"

type listens struct {
	l     *Listener
	calls int
	fail  error
	ret   int
	err   error
}

func (q *listens) hook(c *Case, props string) {
	sched.ListenHook = func(network, addr string) (net.Listener, error) {
		q.calls++
		if !strings.HasPrefix(network, "tcp") || addr != listenAddr {
			c.Fail(props, "listens on %q %q, want %q", network, addr, listenAddr)
		}
		if q.fail != nil {
			return nil, q.fail
		}
		return q.l, nil
	}
}

func (q *listens) run(f func() error) {
	sched.Go("listen and serve", func() {
		q.err = f()
		q.ret++
	})
}

func (q *listens) verdict(c *Case, props string, ended bool) {
	if q.calls == 0 {
		return
	}
	if q.calls > 1 {
		c.Fail(props, "net.Listen called %d times", q.calls)
	}
	if !ended {
		if q.ret > 0 {
			c.Fail(props, "ListenAndServe returned for no reason: %v", q.err)
		}
		if q.l.closed > 0 {
			c.Fail(props, "the listener was closed for no reason")
		}
		return
	}
	if q.ret != 1 {
		c.Fail(props, "ListenAndServe returned %d times", q.ret)
		return
	}
	if q.err == nil {
		c.Fail(props, "ListenAndServe returned no error")
	}
	if q.fail != nil {
		return
	}
	if q.l.closed == 0 {
		c.Fail(props, "ListenAndServe returned and left the listener open")
	}
}

const (
	lsStay = iota
	lsAccept
	lsCancel
	lsCancelFirst
	lsFail
	lsN
)

func initListen() {
	end := func(v int, l *Listener, cancel func()) {
		switch v {
		case lsAccept:
			l.err = syscall.EINVAL
		case lsCancel:
			cancel()
		}
		settle()
	}
	scns = append(scns, &Scn{Name: "spop-listen", Props: []string{"C13"}, N: fixedN(2 * lsN),
		Make: func(v int) *Case {
			how, fn := v%lsN, v/lsN == 1
			var e2 *spopEnv
			var q *listens
			return spopCase(fmt.Sprintf("agent listens, ending %d, package function %v", how, fn), 2, func(e *spopEnv) {
				e2 = newSpop(e.x, e.c)
				q = &listens{l: e2.l}
				q.hook(e.c, "C13")
				if how == lsFail {
					q.fail = syscall.EADDRINUSE
				}
				if how == lsCancelFirst {
					e2.cancel()
				}
				q.run(func() error {
					if fn {
						return spop.ListenAndServe(listenAddr, e2.agent.Handler)
					}
					e2.agent.Addr = listenAddr
					return e2.agent.ListenAndServe()
				})
				settle()
				if how == lsFail || how == lsCancelFirst && !fn || q.calls == 0 {
					return
				}
				s := e2.dial("X").hello(4096)
				e2.send(s, 1, 1, ms("x1", kvStr("a", "b")))
				settle()
				end(how, e2.l, e2.cancel)
				if how != lsCancel || fn {
					e2.send(s, 1, 2, ms("x2", kvStr("a", "b")))
				}
				settle()
			}, func(e *spopEnv) {
				q.verdict(e.c, "C13", how == lsFail || how == lsAccept || !fn && (how == lsCancel || how == lsCancelFirst))
				e2.verify(true)
			})
		},
		Quick: []Bound{{D: 3, Secs: 100}},
		Thor:  []Bound{{D: 4, Secs: 100}},
	})
	scns = append(scns, &Scn{Name: "peer-listen", Props: []string{"C19"}, N: fixedN(2 * lsN),
		Make: func(v int) *Case {
			how, fn := v%lsN, v/lsN == 1
			q := &listens{}
			n := 0
			c := &Case{Label: fmt.Sprintf("peer listens, ending %d, package function %v", how, fn)}
			c.Cfg.NumCPU = 2
			var a *Conn
			bad := false
			c.Body = func(x *sched.Exec) {
				ctx, cancel := context.WithCancel(context.Background())
				x.OnCleanup(cancel)
				q.l = &Listener{}
				q.hook(c, "C19")
				if how == lsFail {
					q.fail = syscall.EADDRINUSE
				}
				if how == lsCancelFirst {
					cancel()
				}
				h := peers.HandlerFunc(func(ctx context.Context, u *st.EntryUpdate) {
					n++
					if ctx.Err() != nil {
						bad = true
					}
				})
				q.run(func() error {
					if fn {
						return peers.ListenAndServe(listenAddr, h)
					}
					return (&peers.Peer{Addr: listenAddr, Handler: h, BaseContext: ctx}).ListenAndServe()
				})
				settle()
				if how == lsFail || how == lsCancelFirst && !fn || q.calls == 0 {
					return
				}
				sq := seqOf([]int{0, 7, 2})
				a = NewConn("X")
				q.l.Push(a)
				a.Feed(stdHandshake)
				a.Feed(sq.stream)
				settle()
				if n != len(sq.want) {
					c.Fail("C19,C14", "%d updates delivered, %d sent", n, len(sq.want))
				}
				end(how, q.l, cancel)
				if how != lsCancel || fn {
					n = 0
					b := NewConn("Y")
					if how != lsAccept {
						q.l.Push(b)
						b.Feed(stdHandshake)
						b.Feed(sq.stream)
					} else {
						a.Feed(sq.stream)
					}
					settle()
					if n != len(sq.want) {
						c.Fail("C19,C14", "%d updates delivered later on, %d sent", n, len(sq.want))
					}
				}
				a.EOF()
				settle()
			}
			c.Final = func(x *sched.Exec) {
				q.verdict(c, "C19", how == lsFail || how == lsAccept || !fn && (how == lsCancel || how == lsCancelFirst))
				if a != nil && a.Closes == 0 {
					c.Fail("C19", "connection not closed after the end of stream")
				}
				if bad {
					c.Fail("C19", "handler called with a cancelled context")
				}
				c.Outcome = fmt.Sprint(q.ret, q.err, n)
			}
			return c
		},
		Quick: []Bound{{D: 3, Secs: 100}},
		Thor:  []Bound{{D: 4, Secs: 100}},
	})
}

func init() { initListen() }
