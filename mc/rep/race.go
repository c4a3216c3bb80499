package rep

import (
	"fmt"
	"os"
	"strings"
)

// RaceLog returns a function that reads what the race detector last reported.
func RaceLog() func() string {
	raceLog := ""
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if p, ok := strings.CutPrefix(f, "log_path="); ok {
			raceLog = fmt.Sprintf("%s.%d", p, os.Getpid())
		}
	}
	return func() string {
		b, _ := os.ReadFile(raceLog)
		s := string(b)
		if i := strings.LastIndex(s, "WARNING: DATA RACE"); i >= 0 {
			s = s[i:]
		}
		var out []string
		n := 0
		for _, l := range strings.Split(s, "\n") {
			t := strings.TrimSpace(l)
			switch {
			case strings.HasPrefix(t, "Write at") || strings.HasPrefix(t, "Read at") || strings.HasPrefix(t, "Previous"):
				out = append(out, strings.Fields(t)[0]+" "+strings.Fields(t)[1])
				n = 0
			case strings.HasPrefix(t, "Goroutine"):
				n = 9
			case strings.Contains(t, ".go:") && n < 3:
				if i := strings.LastIndex(t, "/"); i >= 0 {
					t = t[i+1:]
				}
				t, _, _ = strings.Cut(t, " +0x")
				out = append(out, t)
				n++
			}
		}
		return strings.Join(out, " ")
	}
}
