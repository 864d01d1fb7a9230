// C01: inclusion proofs of fixed-length keys are accepted only for the trie's real value.
package main

import "verif/harness/mptx"

func main() { mptx.Main("C01", false) }
