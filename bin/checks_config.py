import os

FFTW_WRAP = ["-Wl,--wrap=fftw_plan_dft_1d", "-Wl,--wrap=fftw_destroy_plan"]


def dsp(name, **kw):
    return dict(src=[name + ".cpp", "fftw_wrap.cpp"], libs=["common", "dsp"], link=FFTW_WRAP, **kw)


MPI = dict(defs=["-DBUILD_WITH_MPI"], inc=["-I" + os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "harness", "mpi_model")],
           link=["-Wl,--wrap=exit"])

CHECKS = {
    "C01": dsp("C01"),
    "C02": dsp("C02"),
    "C03": dsp("C03"),
    "C04": dsp("C04"),
    "C05": dsp("C05"),
    "C06": dsp("C06"),
    "C07": dsp("C07"),
    "C08": dsp("C08"),
    "C09": dsp("C09"),
    "C10": dsp("C10"),
    "C11": dsp("C11"),
    "C12": dict(src=["C12.cpp"], libs=["common"], templates=True),
    "C13": dict(src=["C13.cpp"], libs=["common"], templates=True),
    "C14": dict(src=["C14.cpp"], libs=["common"], templates=True),
    "C15": dict(src=["C15.cpp"], libs=["common"]),
    "C16": dict(src=["C16.cpp"], libs=["common"]),
    "C17": dict(src=["C17.cpp"], libs=["common", "parallel", "optimization"]),
    "C18": dict(src=["C18.cpp"], libs=["common", "parallel", "optimization"]),
    "C19": dict(src=["C19.cpp"], libs=["common", "parallel", "optimization"]),
    "C20": dict(src=["C20.cpp"], libs=["common", "parallel", "optimization"]),
    "C24": dict(src=["C24.cpp"], libs=["common", "parallel"], variant="tsan"),
    "C29": dict(src=["C29.cpp"], libs=["common", "parallel", "optimization"]),
    "C30": dict(src=["C30.cpp"], libs=["common", "parallel"]),
    "C21": dict(src=["C21.cpp"], libs=["common", "parallel", "optimization"]),
    "C22": dict(src=["C22.cpp"], libs=["common", "parallel", "optimization"]),
    "C23": dict(src=["C23.cpp"], libs=["common", "parallel", "optimization"]),
    "C25": dict(src=["C25.cpp"], libs=["common", "parallel", "optimization"]),
    "C26": dict(src=["C26.cpp"], libs=["common", "parallel", "optimization"]),
    "C27": dict(src=["C27.cpp"], libs=["common", "parallel", "optimization"]),
    "C28": dict(src=["C28.cpp"], libs=["common", "parallel", "optimization"]),
    "C31": dict(src=["C31.cpp"], libs=["common", "parallel", "optimization"]),
    "C32": dict(src=["C32.cpp"], libs=["common", "parallel"], **MPI),
    "C34": dict(src=["C34.cpp"], libs=["common", "parallel", "optimization"], variant="tsan"),
    "C35": dict(src=["C35.cpp", "fftw_wrap.cpp"], libs=["common", "parallel", "optimization", "dsp"], link=FFTW_WRAP, variant="tsan"),
    "C36": dict(src=["C36.cpp", "fftw_wrap.cpp"], libs=["common", "parallel", "optimization", "dsp"], link=FFTW_WRAP),
    "C37": dict(src=["C37.cpp", "fftw_wrap.cpp"], libs=["common", "parallel", "optimization", "dsp"], link=FFTW_WRAP),
    "C38": dict(src=["C38.cpp", "fftw_wrap.cpp"], libs=["common", "parallel", "optimization", "dsp"], link=FFTW_WRAP),
    "C39": dict(src=["C39.cpp"], libs=["common", "parallel", "optimization"]),
    "C33": dict(src=["C33.cpp"], libs=["common", "parallel", "optimization"], **MPI),
}
