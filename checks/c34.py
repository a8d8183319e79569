from checks import linesearch


def run(ck):
    linesearch.run(ck, "adam")
