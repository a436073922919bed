// A stand-in for mutecrypt: it follows the protocol between mutectrl and
// mutecrypt, records what it is asked and fails on demand.
package main

import (
	"bufio"
	"fmt"
	"io/ioutil"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

func main() {
	dir := os.Getenv("VK_FAKE")
	b, _ := ioutil.ReadFile(filepath.Join(dir, "fail"))
	fail, err := strconv.Atoi(string(b))
	if err != nil {
		fail = -1
	}
	log, err := os.OpenFile(filepath.Join(dir, "log"), os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0600)
	if err != nil {
		panic(err)
	}
	for _, a := range os.Args[1:] {
		if a == "decrypt" {
			m, _ := ioutil.ReadAll(os.Stdin)
			p := strings.SplitN(string(m), "\n", 2)
			fmt.Fprintf(os.Stderr, "SENDERIDENTITY:\t%s\n", p[0])
			fmt.Print(p[1])
			return
		}
	}
	s := bufio.NewScanner(os.NewFile(3, "passphrase"))
	s.Scan()
	fmt.Fprintf(log, "%s\n", s.Text())
	s = bufio.NewScanner(os.NewFile(4, "commands"))
	for i := 0; s.Scan(); i++ {
		fmt.Fprintf(log, "%s\n", s.Text())
		if i == fail {
			fmt.Fprintln(os.Stderr, "it failed")
			os.Exit(1)
		}
		if s.Text() == "quit" {
			fmt.Fprintln(os.Stderr, "QUITTING")
			return
		}
		fmt.Fprintln(os.Stderr, "READY.")
	}
}
