// Command check decides one property on the code in /repo.
package main

import "verif/mc/mc"

var checks []*mc.Check

func register(c *mc.Check) { checks = append(checks, c) }

func main() { mc.Main(checks) }
