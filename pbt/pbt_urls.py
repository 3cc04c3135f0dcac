"""URL configuration of the worker: one view, what it does is set by the running case."""
from django.conf.urls import url


class Script(object):
    run = None


SCRIPT = Script()


def view(request):
    return SCRIPT.run(request)


urlpatterns = [url(r"^go$", view)]
