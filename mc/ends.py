"""When runs whose progress is measured may end: compared with runs which measure nothing."""
import itertools


def watch(ctx, label, run, perplexity, close, freqs, lengths, least, measures, slope=lambda before, now: before - now):
    """run(n, freq) -> results of training for n iterations measured every freq-th (0: never).
    Training ends after a measurement past iteration `least` if there are more than `measures` of them and perplexity fell by less than one."""
    plain, early, late = {}, 0, 0

    def after(n):
        if n not in plain:
            r = run(n, 0)
            plain[n] = (perplexity(r), r)
        return plain[n]
    for freq, n in itertools.product(freqs, lengths):
        want, decided = n, True
        for count, i in enumerate(range(0, n, freq), 1):
            if i > least and count > measures:
                fell = slope(after(i - freq + 1)[0], after(i + 1)[0])
                decided = decided and abs(fell - 1) > 1e-6
                if fell < 1:
                    want = i + 1
                    break
                late += 1
        if not decided:
            continue
        early += want < n
        ctx.case((label, freq, n))
        ctx.state((label, freq, n))
        ctx.step(want)
        ctx.ran()
        ok, r = ctx.call("measured-training-raised", run, n, freq)
        if ok:
            close(r, after(want)[1], "stopped-too-soon-or-late")
    return early, late
