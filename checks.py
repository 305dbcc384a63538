"""The registered checks: which harness binary decides a property, in which configurations."""
import gens

AB = ["sse2", "avx2c"]
ALL = ["sse2", "avx2c", "sse42", "avx", "avx512"]
THOROUGH = ["sse2", "avx2c", "sse42", "avx", "avx2", "avx512", "o3", "dbg"]


def lib(n, configs=AB, **kw):
    return dict(crate="harness", bin=f"c{n:02d}", configs=configs, thorough_configs=THOROUGH, **kw)


def ex(n, configs=AB, thorough=("sse2", "avx2c", "sse42", "avx", "avx2", "avx512"), **kw):
    return dict(crate="harness_ex", bin=f"c{n}", features=f"c{n}", configs=configs, thorough_configs=list(thorough), **kw)


CHECKS = {
    "C01": lib(1), "C02": lib(2), "C03": lib(3), "C04": lib(4), "C05": lib(5), "C06": lib(6), "C07": lib(7),
    "C08": lib(8), "C09": lib(9), "C10": lib(10), "C11": lib(11), "C12": lib(12), "C13": lib(13, ALL), "C14": lib(14, ALL), "C15": lib(15), "C16": lib(16, gen=gens.shuffles), "C17": lib(17, ALL),
    "C18": lib(18), "C19": lib(19), "C20": lib(20), "C21": lib(21), "C22": lib(22), "C23": lib(23), "C24": lib(24),
    "C25": lib(25), "C26": lib(26), "C27": lib(27), "C28": lib(28), "C29": lib(29), "C30": lib(30),
    "C31": lib(31, ["sse2", "avx2c", "avx512", "o3"], gen=gens.programs),
    "C39": lib(39, technique="stateful property-based testing: generated call histories and concurrent callers, each result against the same call's first result, with shrinking"),
    "C32": ex(32, gen=gens.slice_sum), "C33": ex(33, ["sse2", "avx2"], ("sse2", "sse42", "avx2", "avx512")), "C34": ex(34), "C35": ex(35), "C36": ex(36), "C37": ex(37),
    # no debug assertions: the example's own assertions judge grazing rays too strictly
    "C38": ex(38, ["sse2", "avx2"], ("sse2", "sse42", "avx", "avx2", "avx512")),
}
