from django.apps import AppConfig


class VfConfig(AppConfig):
    name = "vf.app"
    label = "vf"
    default_auto_field = "django.db.models.BigAutoField"
