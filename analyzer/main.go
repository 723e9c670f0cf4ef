package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"time"
)

// Rule is the analysis that decides a property.
type Rule struct {
	Technique   string
	Explanation string
	Level       string
	Assumptions []string
	Run         func(c *Ctx) `json:"-"`
}

var rules = map[string]*Rule{}

func levelOf(prop string) string { return rules[prop].Level }

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mqcheck <property> [repo] [verif]")
		os.Exit(2)
	}
	prop := os.Args[1]
	if prop == "-list" {
		b, _ := json.Marshal(rules)
		fmt.Println(string(b))
		return
	}
	repo, verif := "/repo", "/verif"
	if len(os.Args) > 2 {
		repo = os.Args[2]
	}
	if len(os.Args) > 3 {
		verif = os.Args[3]
	}
	repo, _ = filepath.Abs(repo)
	start := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	p, err := LoadProgram(repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	ids := []string{prop}
	if prop == "all" {
		ids = sortedKeys(rules)
	}
	code := 0
	for _, id := range ids {
		r := rules[id]
		if r == nil {
			fmt.Fprintln(os.Stderr, "unknown property", id)
			os.Exit(2)
		}
		start = time.Now()
		c := newCtx(p)
		c.Only = id
		c.Known = loadKnown(filepath.Join(verif, "known-findings.txt"))
		c.Thorough = tier == "thorough"
		r.Run(c)
		if rc := c.finish(id, verif, tier, r.Technique, r.Explanation, seed, start, r.Assumptions); rc != 0 {
			code = rc
		}
		if prop == "all" {
			fmt.Printf("  %s %.1fs\n", id, time.Since(start).Seconds())
		}
	}
	os.Exit(code)
}
