package main

import "ZZSIM/harness"

func main() { harness.Main() }
