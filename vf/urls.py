"""Admin site for the tree models; imported only by the checks that use it."""

from django.contrib import admin
from django.core.exceptions import ValidationError
from django.forms.models import BaseInlineFormSet
from django.urls import path

from treebeard.admin import TreeAdmin
from treebeard.forms import movenodeform_factory
from vf.app import models as M

DENY = set()  # primary keys of the nodes nobody may change
PER_PAGE = 2


class Picky(BaseInlineFormSet):
    def clean(self):
        super().clean()
        if self.data.get("reject"):
            raise ValidationError("rejected")


class Admin(TreeAdmin):
    list_per_page = PER_PAGE

    def has_change_permission(self, request, obj=None):
        if obj is not None and obj.pk in DENY:
            return False
        return super().has_change_permission(request, obj)


site = admin.AdminSite(name="admin")


def register(name, inline=None):
    model = getattr(M, name, None)
    if model is None:
        return
    attrs = {"form": movenodeform_factory(model)}
    if inline and hasattr(M, inline):
        attrs["inlines"] = [type(inline + "Inline", (admin.TabularInline,), {"model": getattr(M, inline), "formset": Picky, "extra": 0})]
    site.register(model, type(name + "Admin", (Admin,), attrs))


for k in ("MP", "NS", "AL", "LT"):
    register(k + "Std", k + "Dep")
    for v in ("Sort", "SortD", "Uuid", "StdChild", "StdProxy", "StdGrandChild", "StdChildProxy", "StdProxyProxy"):
        register(k + v)
register("MPTiny")
register("MPDef")

urlpatterns = [path("admin/", site.urls)]

__all__ = ["DENY", "urlpatterns"]
