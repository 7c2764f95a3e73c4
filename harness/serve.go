package harness

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sync"
)

// The same test binary (or one built with other tags) serves as a peer
// process: it reads one case per line and answers with what the library makes
// of it.

// peerCase is what a peer is asked to do.
type peerCase struct {
	Op   string
	Prog *Prog    `json:",omitempty"`
	Data []DCase  `json:",omitempty"`
	Strs []string `json:",omitempty"`
}

func serve() {
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var c peerCase
		if err := json.Unmarshal(line, &c); err != nil {
			fmt.Fprintln(os.Stderr, harnessBugMark, err)
			os.Exit(2)
		}
		b, err := json.Marshal(c.run())
		if err != nil {
			fmt.Fprintln(os.Stderr, harnessBugMark, err)
			os.Exit(2)
		}
		out.Write(append(b, '\n'))
		out.Flush()
	}
}

type peer struct {
	mu  sync.Mutex
	in  io.WriteCloser
	out *bufio.Reader
	cmd *exec.Cmd
}

// startPeer starts the binary named by an environment variable. Without one
// (a harness run by hand) it is this binary.
func startPeer(variable string) *peer {
	bin := os.Getenv(variable)
	if bin == "" {
		if variable != "VERIF_PEER_BIN" {
			harnessBug("%s is not set", variable)
		}
		bin, _ = os.Executable()
	}
	cmd := exec.Command(bin)
	// the peer lives in other surroundings: nothing may depend on them
	cmd.Env = append(os.Environ(), "VERIF_SERVE=1", "GOPATH=/nonexistent/gopath", "HOME=/nonexistent/home", "USER=peer", "LOGNAME=peer", "HOSTNAME=peer", "PWD=/",
		"TZ=Asia/Kathmandu", "LANG=tr_TR.UTF-8", "LC_ALL=tr_TR.UTF-8", "GOMAXPROCS=1", "GOOS=plan9", "GOARCH=arm", "GO111MODULE=off", "GOFLAGS=", "NO_COLOR=1", "TERM=dumb", "SOURCE_DATE_EPOCH=1", "CI=true")
	cmd.Dir = "/"
	cmd.Stderr = os.Stderr
	in, err := cmd.StdinPipe()
	if err != nil {
		harnessBug("%v", err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		harnessBug("%v", err)
	}
	if err := cmd.Start(); err != nil {
		harnessBug("%v", err)
	}
	return &peer{in: in, out: bufio.NewReaderSize(out, 1<<20), cmd: cmd}
}

func (p *peer) stop() {
	p.in.Close()
	p.cmd.Wait()
}

// ask gives the peer's answer; ok is false if it ended without one.
func (p *peer) ask(c peerCase) (answer []string, ok bool) {
	p.mu.Lock()
	defer p.mu.Unlock()
	b, err := json.Marshal(c)
	if err != nil {
		harnessBug("%v", err)
	}
	if _, err := p.in.Write(append(b, '\n')); err != nil {
		return nil, false
	}
	line, err := p.out.ReadBytes('\n')
	if err != nil {
		return nil, false
	}
	if err := json.Unmarshal(line, &answer); err != nil {
		harnessBug("answer of the peer: %v", err)
	}
	return answer, true
}
