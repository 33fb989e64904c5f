// The HTTP server of mllm-server with the sessions named on the command line; ends with its standard input.
package main

import (
	"fmt"
	"io"
	"mllm-cli/mllm"
	pkgmllm "mllm-cli/pkg/mllm"
	"mllm-cli/pkg/server"
	"os"
)

func main() {
	s := pkgmllm.NewService()
	for _, n := range os.Args[2:] {
		m, err := mllm.NewSession("/" + n)
		if err != nil || !m.Insert(n) {
			os.Exit(3)
		}
		s.RegisterSession(n, m)
	}
	h := server.NewServer(os.Args[1], s)
	go h.Start()
	fmt.Println("up")
	io.Copy(io.Discard, os.Stdin)
	os.Exit(0)
}
