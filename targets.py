# add(property, libs=..., shim=..., link=...)
for p in ("C01", "C02", "C03", "C04", "C05", "C20"): add(p)
add("C06", shim=["shim/union.c"])
add("L01", libs=("libmy/varint.c",))
add("L02", libs=("libmy/crc32c.c", "libmy/crc32c-slicing.c", "libmy/crc32c-sse42.c"), fuzz=False)
add("L03", libs=("libmy/b64_encode.c", "libmy/b64_decode.c"))
add("L04", libs=("libmy/b32_encode.c", "libmy/b32_decode.c"))
for p in ("L05", "L06", "L14"): add(p, libs=(), shim=["shim/small.c"], cdefs=["-O0"], link=["-Wl,--wrap=clock_gettime", "-Wl,--wrap=clock_nanosleep", "-Wl,--wrap=nanosleep"] if p == "L14" else [])
add("L17", libs=("libmy/lookup3.c",), san=["-fsanitize=bounds", "-fno-sanitize-recover=all"])  # reading within the aligned word around the key is part of the algorithm; guard pages bound it
add("L07", libs=(), shim=["shim/cont.c"], cdefs=["-O0"])
add("L08", libs=("libmy/heap.c",))
add("L12", libs=(), shim=["shim/cont.c"], cdefs=["-O0"])
add("L09", libs=(), shim=["shim/q_mb.c", "shim/q_mutex.c", "shim/q_sel.c"], cdefs=["-O0", "-fsanitize-coverage=func,trace-pc,trace-loads,trace-stores"], fuzz=False)
add("L10", libs=("libmy/my_fileset.c",), fuzz=False)
add("L11", libs=("libmy/spooldir.c",), link=["-Wl,--wrap=usleep", "-Wl,--wrap=rename"], fuzz=False)
add("C07")
add("C08")
add("C09")
add("C10")
add("C11")
add("C12")
add("C13")
add("C14", link=["-Wl,--wrap=clock_gettime"])
add("C15")
add("C16")
add("C17")
add("C19", shim=["shim/streams.c"])
add("C18")
add("C21")
add("C22", shim=["shim/cli_lookup.c"], link=["-Wl,--wrap=clock_gettime"], fuzz=False)
add("C23", shim=["shim/cli_dump.c"], fuzz=False)
add("C25")
add("C26", shim=["shim/cli_lookup.c", "shim/cli_dump.c"], fuzz=False)
add("C27", cdefs=["-fsanitize-coverage=func,trace-pc,trace-loads,trace-stores"], fuzz=False)
add("C24", libs=(), fuzz=False)
add("L15", libs=("libmy/my_format.c",), shim=["shim/strings.c"], cdefs=["-O0"], link=["-Wl,--wrap=read"])
add("L18", libs=(), shim=["shim/conc.c"], cdefs=["-fsanitize-coverage=func,trace-pc,trace-loads,trace-stores"], fuzz=False)
add("L16", libs=(), shim=["shim/zone.c"], link=["-lldns"], fuzz=False)
add("L13", libs=("libmy/argv.c",))
add("L19", libs=("libmy/my_rate.c",), shim=["shim/rate.c"], link=["-Wl,--wrap=clock_gettime", "-Wl,--wrap=clock_nanosleep", "-Wl,--wrap=nanosleep"], fuzz=False)
add("L20", libs=("libmy/heap.c", "libmy/my_fileset.c", "libmy/spooldir.c", "libmy/argv.c", "libmy/my_format.c"), shim=["shim/cont.c", "shim/small.c", "shim/strings.c", "shim/zone.c", "shim/q_mb.c", "shim/q_mutex.c"], link=["-lldns", "-Wl,--wrap=usleep"], fuzz=False)
