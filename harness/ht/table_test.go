package ht

// Generated by gen.sh.
var Harnesses = map[string]func(){
	"C09_brokers": C09_brokers,
	"C09_refused": C09_refused,
	"C09_start": C09_start,
	"C09_timestamp": C09_timestamp,
	"C09_token": C09_token,
	"C14_brokers": C14_brokers,
	"C15_brokers": C15_brokers,
	"C16_again": C16_again,
	"C16_errors": C16_errors,
	"C16_history": C16_history,
	"C16_many": C16_many,
	"C16_publish": C16_publish,
	"C16_seen": C16_seen,
	"C16_startup": C16_startup,
	"C17_close": C17_close,
	"C17_deliver": C17_deliver,
	"C17_ready": C17_ready,
	"C17_reorg": C17_reorg,
	"C17_schedules": C17_schedules,
	"C18_calls": C18_calls,
	"C18_count": C18_count,
	"C18_latest": C18_latest,
	"C19_address": C19_address,
	"C19_consumer": C19_consumer,
	"C19_malformed": C19_malformed,
	"C19_options": C19_options,
	"C19_pairs": C19_pairs,
	"C19_producer": C19_producer,
	"C19_used": C19_used,
	"C20_block": C20_block,
	"C20_contents": C20_contents,
	"C20_dropped": C20_dropped,
	"C20_interleaved": C20_interleaved,
	"C20_many": C20_many,
	"C20_order": C20_order,
	"C21_answer": C21_answer,
	"C21_catchup": C21_catchup,
	"C21_clients": C21_clients,
	"C21_close": C21_close,
	"C21_early": C21_early,
	"C21_history": C21_history,
	"C21_items": C21_items,
	"C21_leftovers": C21_leftovers,
	"C21_refused": C21_refused,
	"C21_reorg": C21_reorg,
	"C21_resume": C21_resume,
	"C21_stalled": C21_stalled,
	"C21_strays": C21_strays,
	"C21_unsubscribe": C21_unsubscribe,
	"C23_brokers": C23_brokers,
	"C23_counts": C23_counts,
	"C23_each_other": C23_each_other,
	"C23_heartbeats": C23_heartbeats,
	"C23_many": C23_many,
	"C24_again": C24_again,
	"C24_failures": C24_failures,
	"C24_many": C24_many,
	"C24_numbers": C24_numbers,
	"C24_window": C24_window,
	"C25_brokers": C25_brokers,
	"C26_failing": C26_failing,
	"C26_merge": C26_merge,
	"C26_mixed": C26_mixed,
	"C26_resolve": C26_resolve,
	"C26_schedules": C26_schedules,
	"C26_unreachable": C26_unreachable,
	"C26_waiter": C26_waiter,
	"C27_create": C27_create,
	"C27_failures": C27_failures,
	"C27_together": C27_together,
	"C28_close": C28_close,
	"C28_delivers": C28_delivers,
	"C28_failing": C28_failing,
	"C28_many": C28_many,
	"C28_schedules": C28_schedules,
}
