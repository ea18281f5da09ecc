package probes

import (
	"fmt"
	"io/ioutil"
	"os"
	"strconv"
	"strings"
)

// vlistening lists the ports this process listens on.
func vlistening() []int {
	mine := map[string]bool{}
	fds, _ := ioutil.ReadDir("/proc/self/fd")
	for _, f := range fds {
		if l, err := os.Readlink("/proc/self/fd/" + f.Name()); err == nil && strings.HasPrefix(l, "socket:[") {
			mine[strings.TrimSuffix(strings.TrimPrefix(l, "socket:["), "]")] = true
		}
	}
	var out []int
	for _, file := range []string{"tcp", "tcp6"} {
		b, _ := ioutil.ReadFile("/proc/self/net/" + file)
		for _, l := range strings.Split(string(b), "\n") {
			f := strings.Fields(l)
			if len(f) > 9 && f[3] == "0A" && mine[f[9]] {
				var port int
				if i := strings.LastIndexByte(f[1], ':'); i >= 0 {
					n, _ := strconv.ParseInt(f[1][i+1:], 16, 32)
					port = int(n)
				}
				fmt.Println("listening on", port)
				out = append(out, port)
			}
		}
	}
	return out
}
