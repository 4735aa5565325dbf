package main

import (
	"fmt"
	"io/ioutil"
	"os"
	"time"

	"verif/engine/ai"
	"verif/engine/checks"
)

func main() {
	p, err := ai.Load(repo())
	if err != nil {
		panic(err)
	}
	for _, f := range os.Args[1:] {
		b, _ := ioutil.ReadFile(f)
		t := time.Now()
		c := checks.NewCtx(p, "X", false)
		r := checks.CompileText(c, string(b))
		fmt.Println(f, time.Since(t), "errs", r.Errs, "panic", r.Panic, "und", r.Und, r.Where, "linked", r.Linked, len(r.Text))
		if r.Und == "" && r.Panic == "" && len(r.Errs) == 0 {
			checks.RunText(c, string(b))
			fmt.Println(c.Findings)
		}
		if os.Getenv("T") != "" {
			fmt.Println(r.Text)
		}
	}
}

func repo() string {
	if r := os.Getenv("REPO"); r != "" {
		return r
	}
	return "/repo"
}
