"""Database router of C23: everything lives in the database "tree", nothing may touch "default"."""


class Router:
    def db_for_read(self, model, **hints):
        return "tree"

    db_for_write = db_for_read

    def allow_relation(self, a, b, **hints):
        return True

    def allow_migrate(self, db, app_label, **hints):
        return True
