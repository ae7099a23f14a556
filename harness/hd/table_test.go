package hd

// Generated by gen.sh.
var Harnesses = map[string]func(){
	"C01_both": C01_both,
	"C01_contents": C01_contents,
	"C01_keys": C01_keys,
	"C01_many": C01_many,
	"C01_orders": C01_orders,
	"C01_repeats": C01_repeats,
	"C02_counts": C02_counts,
	"C02_missing": C02_missing,
	"C02_twosubs": C02_twosubs,
	"C02_window": C02_window,
	"C03_byte": C03_byte,
	"C03_many": C03_many,
	"C03_subs": C03_subs,
	"C03_three": C03_three,
	"C03_two": C03_two,
	"C04_filter": C04_filter,
	"C04_key": C04_key,
	"C04_nested": C04_nested,
	"C05_large": C05_large,
	"C05_orders": C05_orders,
	"C05_produce": C05_produce,
	"C05_routing": C05_routing,
	"C05_two": C05_two,
	"C06_block": C06_block,
	"C06_counts": C06_counts,
	"C06_keys": C06_keys,
	"C07_block": C07_block,
	"C07_many": C07_many,
	"C07_pattern": C07_pattern,
	"C07_schema": C07_schema,
	"C07_send": C07_send,
	"C08_many": C08_many,
	"C08_order": C08_order,
	"C08_repeat": C08_repeat,
	"C08_seq": C08_seq,
	"C08_wide": C08_wide,
	"C10_flat": C10_flat,
	"C10_fresh": C10_fresh,
	"C10_tree": C10_tree,
	"C10_window": C10_window,
	"C11_late": C11_late,
	"C11_ties": C11_ties,
	"C11_tree": C11_tree,
	"C12_fork": C12_fork,
	"C12_incomplete": C12_incomplete,
	"C12_old": C12_old,
	"C12_release": C12_release,
	"C13_orders": C13_orders,
	"C13_tree": C13_tree,
	"C14_again": C14_again,
	"C14_forgotten": C14_forgotten,
	"C14_fork": C14_fork,
	"C14_number": C14_number,
	"C14_stream": C14_stream,
	"C14_tree": C14_tree,
	"C22_any": C22_any,
	"C22_block": C22_block,
	"C22_count": C22_count,
	"C22_header": C22_header,
	"C22_key": C22_key,
	"C22_reorg": C22_reorg,
	"C25_concurrent": C25_concurrent,
	"C25_reasons": C25_reasons,
	"C25_tree": C25_tree,
}
