extern unsigned long kv_segsize;
