package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"strconv"
	"time"
)

func main() {
	flag.CommandLine.Parse(nil)
	flag.Set("logtostderr", "true")
	a := os.Args[1:]
	if len(a) == 0 {
		fmt.Println("usage: harness check ID | replay FILE | list")
		os.Exit(2)
	}
	atoi := func(s string) int { v, _ := strconv.Atoi(s); return v }
	i64 := func(s string) int64 { v, _ := strconv.ParseInt(s, 10, 64); return v }
	switch a[0] {
	case "list":
		for id := range props {
			fmt.Println(id)
		}
	case "check":
		p := props[a[1]]
		if p == nil {
			fmt.Println("no such property", a[1])
			os.Exit(2)
		}
		os.Exit(runCheck(p))
	case "worker":
		worker(props[a[1]], i64(a[2]), a[3], atoi(a[4]), atoi(a[5]), atoi(a[6]), time.Duration(i64(a[7])), -1)
	case "one": // run one case without reporting: only to see whether the process survives
		i := atoi(a[4])
		worker(props[a[1]], i64(a[2]), a[3], i, 1<<30, i+1, time.Hour, 0)
	case "replayone":
		b, _ := os.ReadFile(a[1])
		var rf replayFile
		json.Unmarshal(b, &rf)
		os.Stdout, _ = os.OpenFile(os.DevNull, os.O_WRONLY, 0)
		c := &Case{Src: ReplaySrc(rf.Choices), Tier: rf.Tier}
		runCase(props[rf.Property], c)
		if c.failed != "" {
			out := os.NewFile(3, "report")
			json.NewEncoder(out).Encode(msg{T: "F", Msg: c.failed, Sample: c.sample})
		}
	case "replay":
		os.Exit(replayCmd(a[1]))
	case "exp":
		experiment(a[1:])
	default:
		fmt.Println("unknown", a[0])
		os.Exit(2)
	}
}
