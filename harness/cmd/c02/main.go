// C02: exclusion proofs are accepted only for keys absent from the trie.
package main

import "verif/harness/mptx"

func main() { mptx.Main("C02", true) }
