package main

import "fmt"

var (
	serverParts = []string{"cli/receiver/server (accept loop, connection handling, answers)", "cli/receiver/storage (repository, record encoding)", "libs/egts (packet codec)"}
	commonParts = []string{"Go runtime, net, logrus as built for the program, with the scheduler, clock, randomness and sockets behind the simulator's seam"}
	commonStubs = []string{"TCP sockets (simulated network)", "clock, timers, randomness, goroutine scheduling"}
)

func realParts(id string) []string {
	var r []string
	switch setup(id) {
	case "S1":
		r = append(r, serverParts...)
		if id == "C12" {
			r = append(r, "in a fifth of the runs: cli/receiver (main, as a whole process) with config, yaml.v2 and all connectors with their client libraries")
		}
	case "S2":
		r = append(r, "cli/receiver (main, as a whole process; several incarnations after crashes)", "cli/receiver/config with yaml.v2")
		r = append(r, serverParts...)
		r = append(r, "cli/receiver/storage/store/* (all connectors) with their client libraries go-redis, nats.go, go-nsq, streadway/amqp, lib/pq with database/sql, go-tarantool with queue")
	case "S3":
		r = append(r, "cli/packet-gen (main, as a whole process)", "libs/egts (packet codec)", "flag")
	}
	return append(r, commonParts...)
}

func stubParts(id string) []string {
	var r []string
	switch setup(id) {
	case "S1":
		r = append(r, "terminals (independent EGTS encoder and reference model)", "storages (scripted)")
		if id == "C12" {
			r = append(r, "in a fifth of the runs: Redis, NATS, NSQ, RabbitMQ, PostgreSQL and Tarantool servers (simulated, speaking the wire protocols)")
		}
	case "S2":
		r = append(r, "terminals (independent EGTS encoder and reference model)", "Redis, NATS, NSQ, RabbitMQ, PostgreSQL and Tarantool servers (simulated, speaking the wire protocols)")
	case "S3":
		r = append(r, "EGTS server (scripted, independent codec)")
	}
	return append(r, commonStubs...)
}

func setup(id string) string {
	switch id {
	case "C15", "C16", "C17", "C19", "C20":
		return "S2"
	case "C18":
		return "S3"
	}
	return "S1"
}

// extra describes what a plan has beyond connections.
func (p *Plan) extra() []string {
	var s []string
	for _, b := range p.Backends {
		t := fmt.Sprintf("backend %s %s", b.Kind, b.State)
		if b.Inactive {
			t += " (not usable)"
		}
		for _, f := range b.Faults {
			t += fmt.Sprintf("; %s %.3f..%.3fs", f.K, float64(f.From)/1e6, float64(f.To)/1e6)
		}
		s = append(s, t)
	}
	for _, t := range p.Terms {
		x := fmt.Sprintf("terminal %d: %d packets, window %d, from %.3fs", t.ID, len(t.Pkts), t.Window, float64(t.Start)/1e6)
		for _, f := range t.Faults {
			x += fmt.Sprintf("; %s at %.3fs", f.K, float64(f.At)/1e6)
		}
		s = append(s, x)
	}
	for _, e := range p.Events {
		s = append(s, fmt.Sprintf("receiver dies at %.3fs or step %d, back after %.3fs", float64(e.At)/1e6, e.Step, float64(e.Down)/1e6))
	}
	for _, q := range p.Gens {
		x := fmt.Sprintf("packet-gen %q: server %s, answers after %.3fs", q.Args, q.State, float64(q.Delay)/1e6)
		for i := range q.Ans {
			x += fmt.Sprintf(" [%d bytes]", len(q.Ans[i].bytes(q.PID, 1)))
		}
		s = append(s, x+" then "+q.End)
	}
	return s
}
