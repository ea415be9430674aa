package main

import "github.com/danielleontiev/neojhat/internal/verifreplay"

func main() { verifreplay.Main() }
