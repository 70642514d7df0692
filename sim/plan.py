"""What each check explores: property -> parts (family, share of the runs, profile), runs per tier, and what the property's faults are."""


def P(family, share, **prof):
    return (family, share, prof)


PLAN = {
    "C01": dict(runs=(4000, 100000), parts=[
        P("build", 4, cores=["mk", "default"], fail=.15),
        P("build", 3, cores=["graph", "solver"], fail=.15),
        P("build", 2, cores=["mk", "default"], session=.6, late=.4, fail=.1),
        P("build", 1, cores=["mk"], interrupt=.3, fsfault=.2, stdout=.2, fail=.2),
        P("cxx", 1, fail=.2, foreign=.2)]),
    "C02": dict(runs=(4000, 100000), parts=[
        P("build", 4, cores=["mk", "default"], fail=.1),
        P("build", 3, cores=["graph", "solver"], fail=.1),
        P("build", 2, cores=["mk", "default"], session=.6, late=.4, fail=.2),
        P("build", 1, cores=["mk", "default"], interrupt=.3, fail=.3, foreign=.3),
        P("cxx", 1, fail=.2)]),
    "C03": dict(runs=(4000, 100000), parts=[
        P("build", 3, cores=["mk", "default"], fail=.5, noise=.6, big=True, foreign=.3, fsfault=.3, stdout=.3),
        P("build", 3, cores=["graph", "solver"], fail=.5, noise=.3, jobs=[1, 1, 2, 3, 8]),
        P("build", 2, cores=["mk", "default"], session=.5, late=.3, fail=.3),
        P("build", 1, cores=["mk"], fail=.2, interrupt=.3, fsfault=.6, statfault=True),
        P("cxx", 1, fail=.5, noise=.5, fsfault=.3)]),
    "C04": dict(runs=(4000, 100000), parts=[
        P("build", 4, cores=["mk", "default"], fail=.95, jobs=[1, 2, 2, 3, 4, 8]),
        P("build", 4, cores=["graph", "solver"], fail=.95),
        P("build", 1, cores=["mk", "default"], fail=.7, session=.6),
        P("build", 1, cores=["mk"], fsfault=.9, fail=.1)]),
    "C05": dict(runs=(4000, 100000), parts=[
        P("build", 4, cores=["mk", "default"], fail=.7, fsfault=.4),
        P("build", 3, cores=["graph", "solver"], fail=.6),
        P("build", 2, cores=["mk", "default"], fail=.5, session=.6, late=.3, noise=.3),
        P("build", 1, cores=["mk", "default"], fail=.0, fsfault=.0, foreign=.5),
        P("cxx", 1, fail=.6, fsfault=.2)]),
    "C06": dict(runs=(4000, 100000), parts=[
        P("build", 3, cores=["graph", "solver"], fail=0, fsfault=0, jobs=[1, 2, 2, 3, 4, 8, 12]),
        P("build", 3, cores=["mk", "default"], fail=0, fsfault=0, clean=0, jobs=[1, 2, 2, 3, 4, 8, 12]),
        P("build", 1, cores=["mk", "default"], fail=.3, session=.5, jobs=[1, 2, 3])]),
    "C07": dict(runs=(4000, 100000), parts=[
        P("build", 5, cores=["mk", "default"], fail=.2, procs=[2, 3, 4, 6]),
        P("build", 2, cores=["mk", "default"], fail=.2, session=.7, late=.5),
        P("build", 2, cores=["mk", "default"], fail=.6, procs=[2, 3]),
        P("build", 1, cores=["mk", "default"], fsfault=.6, fail=0, procs=[2, 3]),
        P("cxx", 1, fail=.2, procs=[2, 3, 4])]),
    "C08": dict(runs=(4000, 100000), parts=[
        P("build", 6, cores=["mk", "default"], fail=.05, procs=[2, 3, 4], clean=.05),
        P("build", 2, cores=["graph"], fail=.05),
        P("build", 2, cores=["mk", "default"], session=.6, late=.3),
        P("cxx", 2, fail=.05, procs=[2, 3, 4])]),
    "C09": dict(runs=(4000, 100000), known={"torn-output-after-kill": ("build", "torn_after_kill")}, parts=[
        P("build", 3, cores=["mk", "default"], fail=.8, procs=[2, 3, 4]),
        P("build", 3, cores=["mk", "default"], interrupt=.8, fail=.1, procs=[2, 3, 4]),
        P("build", 3, cores=["mk", "default"], crash=.8, fail=.1, procs=[2, 3, 4]),
        P("build", 1, cores=["mk", "default"], fsfault=.8, fail=.1, procs=[2, 3]),
        P("cxx", 1, crash=.4, interrupt=.3, fail=.4)]),
    "C10": dict(runs=(4000, 100000), parts=[
        P("build", 5, cores=["mk", "default"], clean=.5, fail=.2, procs=[2, 3, 4]),
        P("build", 2, cores=["mk", "default"], clean=.4, session=.6, fail=.2),
        P("build", 2, cores=["mk", "default"], fail=.6, interrupt=.3, crash=.3, clean=.2),
        P("cxx", 1, clean=.5, session=.5, fail=.2)]),
    "C11": dict(runs=(4000, 80000), parts=[
        P("build", 5, cores=["mk", "default"], noise=.95, fail=.1),
        P("build", 3, cores=["mk", "default"], noise=.95, big=False, fail=.4, jobs=[2, 3, 4, 8]),
        P("build", 1, cores=["mk", "default"], noise=.9, session=.6),
        P("cxx", 1, noise=.9, fail=.3)]),
    "C12": dict(runs=(3000, 80000), parts=[
        P("cxx", 4, procs=[2, 3, 4, 6]),
        P("cxx", 2, fail=.8),
        P("cxx", 2, crash=.8, torn=.3, procs=[3, 3, 4, 5]),
        P("cxx", 1, interrupt=.8, fail=.1),
        P("cxx", 1, fsfault=.7),
        P("cxx", 1, clean=.3, session=.4, fail=.1)]),
    "C13": dict(runs=(4000, 100000), parts=[
        P("build", 4, cores=["mk", "default"], foreign=.6, fail=0),
        P("build", 3, cores=["mk", "default"], foreign=.2, fail=.2, clean=.2, procs=[2, 3, 4]),
        P("build", 2, cores=["mk", "default"], foreign=.3, session=.5),
        P("cxx", 1, foreign=.8)]),
    "C17": dict(runs=(4000, 100000), parts=[
        P("build", 5, cores=["mk", "default"], interrupt=.95, fail=.1, noise=.2),
        P("build", 4, cores=["graph"], interrupt=.95, fail=.1)]),
    "C18": dict(runs=(3000, 70000), parts=[
        P("build", 4, cores=["mk", "default"], session=.95, late=.6, fail=.2),
        P("build", 2, cores=["mk", "default"], session=.95, fail=.6),
        P("build", 1, cores=["graph"], session=.95, fail=.3),
        P("build", 1, cores=["mk", "default"], session=.95, fsfault=.4, fail=.1)]),
    "C14": dict(runs=(4000, 100000), parts=[
        P("registry", 4, crash=.5, power=.5, fsfault=.1),
        P("registry", 4, fsfault=.7, full=.3),
        P("registry", 2, crash=.3, fsfault=.4, power=.3, stdout=.2, big=.3)]),
    "C15": dict(runs=(4000, 100000), parts=[
        P("registry", 6),
        P("registry", 2, big=.5),
        P("registry", 2, crash=.3, fsfault=.3, power=.3, stdout=.1)]),
    "C16": dict(runs=(3000, 70000), parts=[
        P("install", 5, fail=.1, clean=.2),
        P("install", 2, session=.6, fail=.1, clean=.2),
        P("install", 2, fail=.4, fsfault=.3, clean=.3, foreign=.2),
        P("install", 1, interrupt=.4, crash=.4, fail=.1)]),
    "C19": dict(runs=(4000, 100000), parts=[
        P("registry", 5, together=.7),
        P("registry", 4, together=.8, crash=.5, power=.5),
        P("registry", 1, together=.7, big=.7)]),
    "C34": dict(runs=(6000, 150000), parts=[
        P("scripts", 5),
        P("scripts", 2, fail=.3, catch=.4),
        P("scripts", 2, fsfault=.6, catch=.1),
        P("scripts", 1, interrupt=.7)]),
    "C30": dict(runs=(4000, 100000), parts=[
        P("refuse", 6),
        P("refuse", 1, stdout=.6),
        P("refuse", 1, interrupt=.7)]),
    "C31": dict(runs=(5000, 120000), parts=[
        P("modules", 5),
        P("modules", 3, odd=.15, wrong=.8),
        P("modules", 1, fsfault=.5),
        P("modules", 1, interrupt=.5, fail=.3)]),
    "C32": dict(runs=(5000, 120000), parts=[
        P("modules", 6),
        P("modules", 1, odd=.1, wrong=.8),
        P("modules", 2, fail=.5),
        P("modules", 1, interrupt=.4, fsfault=.3)]),
    "C33": dict(runs=(12000, 150000), parts=[
        P("words", 6),
        P("words", 1, interrupt=.5),
        P("words", 2, fail=.4),
        P("words", 1, stdout=.4)]),
}
