"""How each property's harness binaries are built from /repo's working tree."""
CPP20 = ["-std=gnu++20", "-DAWL_INT_128", "-I{repo}", "-I{repo}/Platforms/Posix"]
CPP17J = ["-std=c++17", "-I{repo}", "-I{repo}/Platforms/Posix", "-I{repo}/Extras/JThread/JThreadExtras"]
ASAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
TSAN = ["-fsanitize=thread"]
IO = ["Awl/Io/AtomicStorage.cpp", "Awl/Io/OptionalStorage.cpp", "Awl/Io/PersistentObject.cpp"]
TESTING = ["Awl/Testing/TestConsole.cpp", "Awl/Testing/CommandLineProvider.cpp", "Awl/Testing/TestMap.cpp"]

PC = ["-fsanitize-coverage=trace-pc"]
WRAP = ["-Wl,--wrap=" + f for f in ("pthread_cond_clockwait", "pthread_cond_timedwait", "pthread_cond_wait", "pthread_cond_signal", "pthread_cond_broadcast", "pthread_mutex_lock", "pthread_mutex_unlock")]

VFS = ["-Wl,--wrap=" + f for f in ("open", "close", "read", "write", "lseek", "ftruncate", "fsync", "fdatasync", "fstat", "access", "pread", "pwrite", "stat", "rename", "unlink")]

VFS38 = ["-Wl,--wrap=" + f for f in ("read", "write", "lseek", "ftruncate", "fsync", "fdatasync", "fstat")]

def b(name, src, san="asan", lang="20", repo=(), flags=(), link=(), opt="-O1", cc="g++", tier="quick"):
    if isinstance(src, str): src = [src]
    f = list(CPP20 if lang == "20" else CPP17J)
    f += ["-g1", opt, "-fno-omit-frame-pointer", "-pthread", "-w", "-DVH_SAN_" + san.upper()]
    if san == "asan": f += ASAN
    elif san == "asan1": f += ["-fsanitize=address"]
    elif san == "tsan": f += TSAN
    return dict(name=name, src=src, repo=list(repo), flags=f + list(flags), link=list(link), cc=cc, san=san, tier=tier)

BUILDS = {
    "C01": [b("c01", "c01_vector_set.cpp")],
    "C02": [b("c02", "c02_depth.cpp", san="none", flags=["-fsanitize-coverage=trace-pc", "-DNDEBUG"])],
    "C03": [b("c03", "c03_values.cpp", flags=["-DNDEBUG"])],
    "C04": [b("c04", "c04_ring.cpp")],
    "C05": [b("c05", "c05_lists.cpp")],
    "C06": [b("c06", "c06_observable.cpp")],
    "C07": [b("c07", "c07_observable_set.cpp")],
    "C08": [b("c08", "c08_mirror_set.cpp")],
    "C09": [b("c09", "c09_foreign_set.cpp")],
    "C10": [b("c10", "c10_object_pool.cpp")],
    "C13": [b("c13t", "c13_stop_token.cpp", san="tsan", lang="17j", flags=PC), b("c13a", "c13_stop_token.cpp", lang="17j", flags=PC)],
    "C14": [b("c14t", "c14_jthread.cpp", san="tsan", lang="17j", flags=PC), b("c14a", "c14_jthread.cpp", lang="17j", flags=PC)],
    "C12": [b("c12t", "c12_sleep.cpp", san="tsan", link=WRAP), b("c12a", "c12_sleep.cpp", link=WRAP)],
    "C11": [b("c11t", "c11_update_queue.cpp", san="tsan", flags=PC), b("c11a", "c11_update_queue.cpp", flags=PC)],
    "C15": [b("c15", "c15_hash_stream.cpp")],
    "C16": [b("c16", "c16_corruption.cpp")],
    "C17": [b("c17", "c17_hashes.cpp")],
    "C18": [b("c18", "c18_plain.cpp", opt="-O0")],
    "C19": [b("c19", "c19_malformed.cpp", opt="-O0")],
    "C20": [b("c20s", "c20_special.cpp", opt="-O0")] + [b("c20_%d" % k, "c20_versions.cpp", san="asan1", opt="-O0", flags=['-DVTS_HEADER="gen/vts_%d.h"' % k]) for k in range(14)]
         + [b("c20d_%d" % k, "c20_versions.cpp", san="asan1", opt="-O0", flags=['-DVTS_HEADER="gen/vts_%d.h"' % k, "-DVH_DEEP"], tier="thorough") for k in range(14)],
    "C23": [b("c23", "c23_faults.cpp", repo=IO, link=VFS)],
    "C25": [b("c25", "c25_streams.cpp", link=VFS)],
    "C24": [b("c24", "c24_objects.cpp", repo=IO, opt="-O0")],
    "C22": [b("c22", "c22_crash.cpp", repo=IO, link=VFS)],
    "C26": [b("c26", "c26_decimal.cpp", flags=["-fsanitize=float-cast-overflow"])],
    "C27": [b("c27", "c27_decimal_text.cpp", flags=["-fsanitize=float-cast-overflow"])],
    "C28": [b("c28", "c28_decimal_limits.cpp", flags=["-fsanitize=float-cast-overflow"])],
    "C29": [b("c29", "c29_comparers.cpp", opt="-O0")],
    "C30": [b("c30", "c30_bitmap_enum.cpp", opt="-O0")],
    "C31": [b("c31", "c31_generators.cpp")],
    "C32": [b("c32", "c32_tasks.cpp")],
    "C33": [b("c33", "c33_owners.cpp"), b("c33s", "c33_static.cpp", san="tsan")],
    "C34": [b("c34", "c34_text.cpp")],
    "C35": [b("c35", "c35_testing.cpp", repo=TESTING)],
    "C36": [b("c36", "c36_reflection.cpp")],
    "C37": [b("c37_%d" % k, ["c37_%s.cpp" % x for x in order.split()], opt="-O0") for k, order in enumerate(("registry a b c", "c b registry a", "b a c registry"))],
    "C38": [b("c38t", "c38_snapshot.cpp", san="tsan", repo=IO, flags=PC, link=VFS38), b("c38a", "c38_snapshot.cpp", repo=IO, flags=PC, link=VFS38)],
    "C21": [b("c21", "c21_failed_load.cpp", opt="-O0")],
}

from rules import RULES, ASSUME
