package main

import (
	"context"
	"net"
	"os"
	"runtime"
	"strconv"
	"syscall"
	"time"
)

// Names of hosts, as DNS and /etc/hosts resolve them, and the addresses behind them.

// HostName is a name that code under test may look up.
type HostName struct {
	Name  string   `json:"name"`
	Addrs []string `json:"addrs"`            // in the order of the resolver; "home" is where its owner runs
	LatUs int64    `json:"lat_us,omitempty"` // of a lookup
}

type hostName struct {
	HostName
	home string // address of its owner at present
	n    int
	mode string // "" or how lookups fail
}

// addName makes a name known. Addresses that are not its home lead nowhere.
func (n *Network) addName(h HostName, port int) *hostName {
	k := &hostName{HostName: h, home: "127.0.0.1"}
	for _, a := range h.Addrs {
		if a != "home" {
			n.dead[net.JoinHostPort(a, strconv.Itoa(port))] = deadHow(net.ParseIP(a))
		}
	}
	n.names[h.Name] = k
	return k
}

// deadHow: what happens to connections to an address nobody has.
func deadHow(ip net.IP) string {
	switch {
	case ip.Equal(net.IPv6loopback), ip.To4() != nil:
		return "refuse"
	case ip[0] == 0xfd:
		return "noroute"
	}
	return "drop"
}

// move gives the name's owner another address; the old one leads nowhere from now on.
func (n *Network) move(k *hostName, port int, drop bool) {
	how := "refuse"
	if drop {
		how = "drop"
	}
	n.dead[net.JoinHostPort(k.home, strconv.Itoa(port))] = how
	k.n++
	k.home = "10.7." + strconv.Itoa(port%250) + "." + strconv.Itoa(k.n)
}

func (n *Network) Lookup(ctx context.Context, host string) (as []net.IPAddr, err error) {
	env(func() {
		k := n.names[host]
		if k == nil {
			k = &hostName{mode: "gone"}
			k.LatUs = 500
		}
		if node := runtime.SimNode(); n.nofile && node >= nodeRecv && node < nodeGen {
			n.faults.add("no-descriptor-lookup")
			err = &net.DNSError{Err: "dial udp 127.0.0.11:53: socket: too many open files", Name: host, Server: "127.0.0.11:53", IsTemporary: true}
			return
		}
		if n.sleep(ctx, us(k.LatUs)) != nil {
			err = lookupTimeout(host)
			return
		}
		switch k.mode {
		case "gone":
			n.faults.add("name-unknown")
			err = &net.DNSError{Err: "no such host", Name: host, Server: "127.0.0.11:53", IsNotFound: true}
		case "servfail":
			n.faults.add("name-server-fails")
			err = &net.DNSError{Err: "server misbehaving", Name: host, Server: "127.0.0.11:53", IsTemporary: true}
		case "timeout":
			n.faults.add("name-server-silent")
			for i := 0; i < 10 && err == nil && k.mode == "timeout"; i++ {
				if n.sleep(ctx, time.Second) != nil {
					err = lookupTimeout(host)
				}
			}
			if err == nil && k.mode == "timeout" {
				err = lookupTimeout(host)
			}
		}
		if err != nil {
			return
		}
		for _, a := range k.Addrs {
			if a == "home" {
				a = k.home
			}
			as = append(as, net.IPAddr{IP: net.ParseIP(a)})
		}
		if len(as) > 1 {
			n.faults.add("name-with-dead-addresses")
		}
	})
	return
}

func lookupTimeout(host string) error {
	return &net.DNSError{Err: "i/o timeout", Name: host, Server: "127.0.0.11:53", IsTimeout: true, IsTemporary: true}
}

// deadEnd: connecting to an address nobody has.
func (n *Network) deadEnd(ctx context.Context, how string, lat time.Duration) error {
	switch how {
	case "noroute":
		return os.NewSyscallError("connect", syscall.ENETUNREACH)
	case "drop":
		n.faults.add("dial-blackholed")
		if err := n.sleep(ctx, 127*time.Second); err != nil {
			return err
		}
		return os.NewSyscallError("connect", syscall.ETIMEDOUT)
	}
	if err := n.sleep(ctx, 2*lat); err != nil {
		return err
	}
	return os.NewSyscallError("connect", syscall.ECONNREFUSED)
}
