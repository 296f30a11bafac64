struct __itt_domain; struct __itt_string_handle; struct __itt_id { unsigned long d1, d2, d3; };
static const __itt_id __itt_null = {0,0,0};
__itt_domain *__itt_domain_create(const char *); __itt_string_handle *__itt_string_handle_create(const char *);
void __itt_task_begin(__itt_domain *, __itt_id, __itt_id, __itt_string_handle *); void __itt_task_end(__itt_domain *);
