struct ent { const char *name; void (*f)(void); };
extern struct ent ents[];
