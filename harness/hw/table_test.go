package hw

// Generated by gen.sh.
var Harnesses = map[string]func(){
	"C15_again": C15_again,
	"C15_announced": C15_announced,
	"C15_any": C15_any,
	"C15_during": C15_during,
	"C15_history": C15_history,
	"C15_many": C15_many,
	"C15_messages": C15_messages,
	"C15_reorg": C15_reorg,
	"C15_siblings": C15_siblings,
	"C15_stop": C15_stop,
	"C15_twice": C15_twice,
	"C15_while": C15_while,
}
